prop = "P12"
needs = "a collision model that is inflated and later given a smaller margin"
breaks = "reducing the margin of a collision model has no effect: collisions and distances keep using the larger model"
edits = [("VirtualRobot/CollisionDetection/CollisionModel.cpp", "float diff = std::abs(margin - value);", "float diff = value - margin;")]
demo = r'''
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/CollisionDetection/CollisionModel.h>
#include <VirtualRobot/CollisionDetection/CollisionChecker.h>
#include <iostream>
using namespace VirtualRobot;
int main()
{
    ObstaclePtr a = Obstacle::createBox(100, 100, 100), b = Obstacle::createBox(100, 100, 100);
    Eigen::Matrix4f m = Eigen::Matrix4f::Identity();
    m(0, 3) = 150;
    b->setGlobalPose(m);
    auto d = [&] { return CollisionChecker::getGlobalCollisionChecker()->calculateDistance(a->getCollisionModel(), b->getCollisionModel()); };
    float d0 = d();
    a->getCollisionModel()->inflateModel(20.0f);
    float d1 = d();
    a->getCollisionModel()->inflateModel(0.0f);
    float d2 = d();
    std::cout << d0 << " " << d1 << " " << d2 << std::endl;
    return d1 < d0 - 5 && std::abs(d2 - d0) < 0.1f ? 0 : 1;
}
'''
